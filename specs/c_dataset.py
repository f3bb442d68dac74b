import numpy as np
import random
import torch
from beer.cli.dataset import Utterance
from beer.cli.dataset import UtteranceIterator


@spec('P32', 'beer.cli.dataset:UtteranceIterator.__init__')
def _(self, utts, fea_dict):
    self.utts = utts
    self.fea_dict = fea_dict
    self.idx = 0


@spec('P32', 'beer.cli.dataset:UtteranceIterator.__iter__')
def _(self):
    return self


@spec('P32', 'beer.cli.dataset:UtteranceIterator.__next__')
def _(self):
    try:
        uttid = self.utts[self.idx]
    except IndexError:
        raise StopIteration
    features = torch.from_numpy(self.fea_dict[uttid]).float()
    self.idx += 1
    return Utterance(id=uttid, features=features)


@spec('P32', 'beer.cli.dataset:Dataset.fea_dict')
def _(self):
    if self._fea_dict is None:
        self._fea_dict = np.load(self.feapath)
    return self._fea_dict


@spec('P32', 'beer.cli.dataset:Dataset.__getstate__')
def _(self):
    self._fea_dict = None
    return self.__dict__


@spec('P32', 'beer.cli.dataset:Dataset.__len__')
def _(self):
    features = np.load(self.feapath)
    return len(features.files)


@spec('P32', 'beer.cli.dataset:Dataset.utterances')
def _(self, random_order=True):
    uttsid = sorted(list(self.fea_dict.keys()))
    if random_order:
        random.shuffle(uttsid)
    return UtteranceIterator(uttsid, self.fea_dict)


@spec('P32', 'beer.cli.dataset:Dataset.__getitem__')
def _(self, key):
    features = torch.from_numpy(self.fea_dict[key]).float()
    return Utterance(key, features)

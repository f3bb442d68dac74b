import torch
from beer.models.modelset import DynamicallyOrderedModelSet
from beer.utils import onehot


@spec('P14', 'beer.models.hmm:HMM.create')
def _(cls, graph, modelset):
    return cls(graph, modelset)


@spec('P14', 'beer.models.hmm:HMM.__init__')
def _(self, graph, modelset):
    super().__init__(DynamicallyOrderedModelSet(modelset))
    self.graph = graph


@spec('P14', 'beer.models.hmm:HMM._pc_llhs')
def _(self, stats, inference_graph):
    order = inference_graph.pdf_id_mapping
    return self.modelset.expected_log_likelihood(stats, order)


@spec('P14', 'beer.models.hmm:HMM._inference')
def _(self, pc_llhs, inference_graph, viterbi=False, state_path=None, trans_posteriors=False):
    if viterbi or state_path is not None:
        if state_path is None:
            path = inference_graph.best_path(pc_llhs)
        else:
            path = state_path
        posts = onehot(path, inference_graph.n_states, dtype=pc_llhs.dtype, device=pc_llhs.device)
        if trans_posteriors:
            n_states = inference_graph.n_states
            trans_posts = torch.zeros(len(pc_llhs) - 1, n_states, n_states, dtype=pc_llhs.dtype, device=pc_llhs.device)
            for i, transition in enumerate(zip(path[:-1], path[1:])):
                src, dest = transition
                trans_posts[i, src, dest] = 1
            retval = (posts, trans_posts)
        else:
            retval = posts
        llh = (pc_llhs * posts).sum()
    else:
        retval, llh = inference_graph.posteriors(pc_llhs, trans_posteriors=trans_posteriors)
    return (retval, llh)


@spec('P14', 'beer.models.hmm:HMM.mean_field_factorization')
def _(self):
    return self.modelset.mean_field_factorization()


@spec('P14', 'beer.models.hmm:HMM.sufficient_statistics')
def _(self, data):
    return self.modelset.sufficient_statistics(data)


@spec('P14', 'beer.models.hmm:HMM.expected_log_likelihood')
def _(self, stats, inference_graph=None, viterbi=False, state_path=None, scale=1.0):
    trans_posts = True if inference_graph is None else False
    if inference_graph is None:
        inference_graph = self.graph
    pc_llhs = scale * self._pc_llhs(stats, inference_graph)
    all_resps, llh = self._inference(pc_llhs.detach(), inference_graph, viterbi=viterbi, state_path=state_path, trans_posteriors=trans_posts)
    if trans_posts:
        self.cache['resps'], self.cache['trans_resps'] = all_resps
    else:
        self.cache['resps'] = all_resps
        self.cache.pop('trans_resps', None)
    exp_llh = (pc_llhs * self.cache['resps']).sum(dim=-1)
    self.cache['scale'] = scale
    return exp_llh


@spec('P14', 'beer.models.hmm:HMM.accumulate')
def _(self, stats, parent_msg=None):
    scaled_resps = self.cache['scale'] * self.cache['resps']
    retval = {**self.modelset.accumulate(stats, scaled_resps)}
    return retval


@spec('P14', 'beer.models.hmm:HMM.decode')
def _(self, data, inference_graph=None, scale=1.0):
    if inference_graph is None:
        inference_graph = self.graph
    stats = self.sufficient_statistics(data)
    pc_llhs = scale * self._pc_llhs(stats, inference_graph)
    best_path = inference_graph.best_path(pc_llhs)
    best_path = [inference_graph.pdf_id_mapping[state] for state in best_path]
    best_path = torch.LongTensor(best_path)
    return best_path


@spec('P14', 'beer.models.hmm:HMM.posteriors')
def _(self, data, inference_graph=None, scale=1.0):
    if inference_graph is None:
        inference_graph = self.graph
    stats = self.modelset.sufficient_statistics(data)
    pc_llhs = scale * self._pc_llhs(stats, inference_graph)
    return self._inference(pc_llhs, inference_graph)[0]

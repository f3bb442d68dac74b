"""Development aid: freeze the member names of the external modules, so that
name resolution needs neither import nor the environment of the library.

run with /opt/venv/bin/python"""
import builtins
import importlib
import inspect
import json
import os
import warnings
warnings.simplefilter('ignore')
MODS = '''torch torch.nn torch.nn.functional torch.nn.init torch.autograd
torch.optim torch.optim.lr_scheduler torch.utils torch.utils.data torch.cuda
torch.linalg torch.special torch.distributions torch.multiprocessing
torch.nn.utils torch.nn.parameter torch.random torch.testing torch.jit
torch.fft torch.backends
numpy numpy.linalg numpy.random numpy.fft numpy.lib numpy.ma
scipy scipy.signal scipy.io scipy.io.wavfile scipy.special scipy.linalg
math cmath os os.path sys io re copy pickle json glob argparse logging
collections collections.abc itertools functools operator random abc enum
dataclasses typing warnings subprocess time datetime zipfile tarfile uuid
pathlib shutil tempfile string bisect heapq contextlib types inspect ast
struct wave csv gzip bz2 codecs textwrap pprint numbers statistics decimal
fractions signal threading multiprocessing queue concurrent.futures
importlib pkgutil traceback pdb unittest doctest hashlib base64 platform
socket yaml natsort graphviz'''.split()
mods, attrs = {}, set()
for n in MODS:
    try:
        m = importlib.import_module(n)
    except Exception:
        print('absent', n)
        continue
    mods[n] = sorted(set(dir(m)))
    for x in dir(m):
        try:
            v = getattr(m, x)
        except Exception:
            continue
        if inspect.isclass(v):
            attrs |= set(dir(v))
        else:
            attrs |= set(dir(type(v)))
        attrs.add(x)
for n in list(mods):
    # sub-modules reachable as attributes
    p, _, c = n.rpartition('.')
    if p in mods and c not in mods[p]:
        mods[p] = sorted(mods[p] + [c])
import numpy as np
import torch
import torch.nn
for v in (b'', '', 0, 0., [], {}, (), set(), frozenset(), iter([]), {}.keys(),
          {}.values(), {}.items(), open(os.devnull), open(os.devnull, 'rb'),
          torch.zeros(1), np.zeros(1), np.float64(1), torch.float32,
          torch.device('cpu'), torch.Generator(), (x for x in []), slice(1),
          range(1), lambda: 0, print, Exception(), torch.zeros(1).shape,
          np.dtype('f4'), np.lib.npyio.NpzFile, type, torch.nn.Linear(1, 1),
          torch.optim.Adam([torch.zeros(1, requires_grad=True)])):
    attrs |= set(dir(v))
    if isinstance(v, type):
        attrs |= set(dir(v))
attrs |= set(vars(torch.nn.Linear(1, 1))) | {
    'defaults', 'param_groups', 'state', 'prog', 'choices', 'weight', 'bias',
    'graph_attr', 'node_attr', 'edge_attr', 'body',
    'files', 'f', 'returncode', 'stdout', 'stderr', 'msg', 'args', 'errno',
    'strerror', 'filename', 'tb_lineno'}
bases = {}
L = torch.nn.Module()
bases['torch.nn.Module'] = sorted(set(dir(L)) | set(vars(L)))
bases['torch.nn.ModuleList'] = sorted(set(dir(torch.nn.ModuleList())) | set(
    vars(torch.nn.ModuleList())))
lin = torch.nn.Linear(1, 1)
bases['torch.nn.Linear'] = sorted(set(dir(lin)) | set(vars(lin)))
bases['torch.autograd.Function'] = sorted(set(dir(torch.autograd.Function)) | {
    'saved_tensors', 'needs_input_grad', 'save_for_backward'})
import abc
import argparse
bases['abc.ABC'] = sorted(dir(abc.ABC))
for n in ('Exception', 'ValueError', 'object', 'dict', 'list', 'RuntimeError',
          'KeyError', 'TypeError', 'NotImplementedError'):
    bases[n] = sorted(set(dir(getattr(builtins, n))) | {'args'})
bases['argparse.Action'] = sorted(set(dir(argparse.Action)) | set(
    vars(argparse.Action([], 'x'))))
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),
                   'sa', 'rules', 'externals.json')
with open(out, 'w') as f:
    json.dump({'modules': mods, 'attrs': sorted(attrs),
               'builtins': sorted(dir(builtins)) + [
                   '__file__', '__name__', '__doc__', '__package__',
                   '__spec__', '__path__', '__builtins__', 'WindowsError',
                   '__class__', '__annotations__', '__loader__'],
               'bases': bases}, f, indent=0)
print(len(mods), len(attrs), os.path.getsize(out))

import io
import os
import subprocess
import torch
import torch.autograd as autograd
from beer.utils import NoGPUAvailable
from beer.utils import get_active_gpus
from beer.utils import get_gpus
from beer.utils import symmetrize_matrix


@spec('P32', 'beer.utils:get_gpus')
def _():
    cmd = 'nvidia-smi --query-gpu=gpu_uuid,index --format=csv,noheader'
    outproc = subprocess.run(cmd, shell=True, text=True, capture_output=True, check=True)
    output = io.StringIO(outproc.stdout)
    retval = {}
    for line in output:
        tokens = line.strip().split(',')
        uuid, idx = (tokens[0], int(tokens[1]))
        retval[uuid] = idx
    return retval


@spec('P32', 'beer.utils:get_active_gpus')
def _():
    cmd = 'nvidia-smi --query-compute-apps=gpu_uuid --format=csv,noheader'
    outproc = subprocess.run(cmd, shell=True, text=True, capture_output=True, check=True)
    output = io.StringIO(outproc.stdout)
    return set([line.strip() for line in output])


@spec('P32', 'beer.utils:reserve_gpu')
def _(max_retry=12, logger=None, wait_time=10):
    import time
    cmd = "nvidia-smi --query-gpu=index,utilization.gpu --format='csv'"
    count = 0
    gpu_reserved = False
    gpus = get_gpus()
    while count < max_retry and (not gpu_reserved):
        active_gpus = get_active_gpus()
        for gpu, gpu_idx in gpus.items():
            if gpu not in active_gpus:
                if logger is not None:
                    logger.debug(f'trying to reserve gpu {gpu_idx}')
                os.environ['CUDA_VISIBLE_DEVICES'] = str(gpu_idx)
                try:
                    dummy = torch.zeros(1, device=torch.device('cuda'))
                    gpu_reserved = True
                except Exception as err:
                    if logger is not None:
                        logger.debug(f'attempt to reserve a GPU failed: {err}')
            if gpu_reserved:
                break
        else:
            if logger is not None:
                logger.debug(f'waiting {wait_time} seconds...')
            time.sleep(wait_time)
        count += 1
    if not gpu_reserved:
        raise NoGPUAvailable("Couldn't reserve a GPU")
    return gpu_idx


@spec('P32', 'beer.utils:onehot')
def _(labels, max_label, dtype, device):
    retval = torch.zeros(len(labels), max_label, dtype=dtype, device=device)
    idxs = torch.arange(0, len(labels)).long()
    retval[idxs, labels] = 1
    return retval


@spec('P32', 'beer.utils:logsumexp')
def _(tensor, dim=0):
    tmax, _ = torch.max(tensor, dim=dim, keepdim=True)
    retval = torch.where((tmax == float('-inf')) | (tmax == float('inf')), tmax, tmax + (tensor - tmax).exp_().sum(dim=dim, keepdim=True).log_())
    new_size = list(tensor.size())
    del new_size[dim]
    return retval.view(*new_size)


@spec('P32', 'beer.utils:symmetrize_matrix')
def _(mat):
    return 0.5 * (mat + mat.t())


@spec('P32', 'beer.utils:make_symposdef')
def _(mat, eval_threshold=0.1):
    sym_mat = symmetrize_matrix(mat)
    evals, evecs = torch.linalg.eigh(sym_mat)
    threshold = torch.tensor(eval_threshold, dtype=sym_mat.dtype, device=sym_mat.device)
    new_evals = torch.where(evals < threshold * evals[-1], threshold * evals[-1], evals)
    return (evecs @ torch.diag(new_evals) @ evecs.t()).view(*mat.shape)


@spec('P32', 'beer.utils:sample_from_normals')
def _(means, variances, nsamples):
    dim1, dim2 = means.shape
    return means + torch.sqrt(variances) * torch.randn(nsamples, dim1, dim2, dtype=means.dtype, device=means.device)


@spec('P32', 'beer.utils:jacobians')
def _(outputs, inputs):
    dim, dtype, device = (len(outputs), outputs.dtype, outputs.device)
    jac_matrices = [torch.zeros(dim, len(tensor.view(-1)), dtype=dtype, device=device) for tensor in inputs]
    for i in range(dim):
        for input_tensor in inputs:
            input_tensor.grad = None
        autograd.backward(outputs[i], retain_graph=True)
        for j, in_tensor in enumerate(inputs):
            jac_matrices[j][i, :] = in_tensor.grad.view(-1)
    return jac_matrices


@spec('P32', 'beer.utils:approximate_hessian')
def _(list_grads):
    hessians = []
    for grads in list_grads:
        hessians.append(torch.sum(grads[:, :, None] * grads[:, None, :], dim=0))
    return hessians

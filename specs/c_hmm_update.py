import beer
import os
import pickle
import sys
import torch


@spec('P20', 'beer.cli.subcommands.hmm.update:main')
def _(args, logger):
    logger.debug('load the model')
    with open(args.model, 'rb') as f:
        model = pickle.load(f)
    logger.debug('building the optimizer')
    optim = beer.VBConjugateOptimizer(model.conjugate_bayesian_parameters(keepgroups=True), lrate=args.learning_rate)
    if args.optim_state and os.path.isfile(args.optim_state):
        logger.debug(f'loading optimizer state from: {args.optim_state}')
        state = torch.load(args.optim_state)
        optim.load_state_dict(state)
    optim.init_step()
    elbo = None
    nutts = 0
    count = 0
    for line in sys.stdin:
        path = line.strip()
        logger.debug(f'loading ELBO stored in {path}')
        with open(path, 'rb') as f:
            elbo_batch, nutts_batch = pickle.load(f)
        if elbo is None:
            elbo = elbo_batch
            nutts = nutts_batch
        else:
            elbo += elbo_batch
            nutts += nutts_batch
        count += 1
    logger.debug('synchronizing the ELBO and the model')
    elbo.sync(model)
    logger.debug('computing the gradient')
    elbo.backward()
    logger.debug('updating the model')
    optim.step()
    logger.debug('saving the new model')
    with open(args.out_model, 'wb') as f:
        pickle.dump(model, f)
    if args.optim_state:
        logger.debug(f'saving the optimizer state to: {args.optim_state}')
        torch.save(optim.state_dict(), args.optim_state)
    logger.info(f'accumulated ELBO={float(elbo) / (nutts * elbo._datasize):.3f}')

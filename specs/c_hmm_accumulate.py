import beer
import numpy as np
import pickle
import sys


@spec('P20', 'beer.cli.subcommands.hmm.accumulate:main')
def _(args, logger):
    logger.debug('load the model')
    with open(args.model, 'rb') as f:
        model = pickle.load(f)
    logger.debug('load the dataset')
    with open(args.dataset, 'rb') as f:
        dataset = pickle.load(f)
    alis = None
    if args.alis:
        logger.debug('loading alignment graphs')
        alis = np.load(args.alis, allow_pickle=True)
    elbo = beer.evidence_lower_bound(datasize=dataset.size)
    count = 0
    for line in sys.stdin:
        uttid = line.strip().split()[0]
        try:
            utt = dataset[uttid]
        except KeyError:
            logger.warning(f'no utterance {uttid} in {args.dataset}')
            continue
        aligraph = None
        if alis:
            try:
                aligraph = alis[uttid][0]
            except KeyError:
                logger.warning(f'no alignment graph for utterance "{uttid}"')
        logger.debug(f'processing utterance: {utt.id}')
        elbo += beer.evidence_lower_bound(model, utt.features, inference_graph=aligraph, datasize=dataset.size, scale=args.acoustic_scale)
        logger.debug(f'ELBO: {float(elbo)}')
        count += 1
    logger.debug('saving the accumulated ELBO...')
    with open(args.out, 'wb') as f:
        pickle.dump((elbo, count), f)
    if count == 0:
        logger.warning('no utterance to accumulate')
        return
    logger.info(f'accumulated ELBO over {count} utterances: {float(elbo) / (count * dataset.size):.3f}.')

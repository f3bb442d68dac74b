import beer
import pickle


@spec('P20', 'beer.cli.subcommands.hmm.train:main')
def _(args, logger):
    logger.debug('load the model')
    with open(args.model, 'rb') as f:
        model = pickle.load(f)
    logger.debug('load the dataset')
    with open(args.dataset, 'rb') as f:
        dataset = pickle.load(f)
    logger.debug('create the optimizer')
    optim = beer.VBConjugateOptimizer(model.conjugate_bayesian_parameters(keepgroups=True), lrate=args.lrate)
    batch_size = args.batch_size if args.batch_size > 0 else len(dataset)
    for epoch in range(1, args.epochs + 1):
        elbo = beer.evidence_lower_bound(datasize=dataset.size)
        optim.init_step()
        for i, utt in enumerate(dataset.utterances(), start=1):
            logger.debug(f'processing utterance: {utt.id}')
            elbo += beer.evidence_lower_bound(model, utt.features, datasize=dataset.size)
            if i % batch_size == 0:
                elbo.backward()
                optim.step()
                logger.info(f'{'epoch=' + str(epoch):<20}  {'batch=' + str(i // batch_size) + '/' + str(int(len(dataset) / batch_size)):<20} {'ELBO=' + str(round(float(elbo) / (batch_size * dataset.size), 3)):<20}')
                elbo = beer.evidence_lower_bound(datasize=dataset.size)
                optim.init_step()
    logger.debug('save the model on disk...')
    with open(args.out, 'wb') as f:
        pickle.dump(model, f)
    logger.info(f'finished training after {args.epochs} epochs. KL(q || p) = {float(model.kl_div_posterior_prior()): .3f}')

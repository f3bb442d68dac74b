import beer
import io
import numpy as np
import os
import subprocess
import sys
import yaml
from beer.cli.subcommands.features.extract import ShowDefaultsAction
from beer.cli.subcommands.features.extract import compute_dct_bases
from beer.cli.subcommands.features.extract import feaconf
from scipy.io.wavfile import read


@spec('P24', 'beer.cli.subcommands.features.extract:compute_dct_bases')
def _(nfilters, n_dct_coeff):
    dct_bases = np.zeros((nfilters, n_dct_coeff))
    for m in range(n_dct_coeff):
        dct_bases[:, m] = np.cos((m + 1) * np.pi / nfilters * (np.arange(nfilters) + 0.5))
    return dct_bases


@spec('P24', 'beer.cli.subcommands.features.extract:setup')
def _(parser):
    parser.add_argument('--show-default-conf', action=ShowDefaultsAction, help='show the default configuration and exit')
    parser.add_argument('feaconf', help='configuration file of the features')
    parser.add_argument('wav_list', help='list of WAV files or "-" for stdin')
    parser.add_argument('outdir', help='output directory')


@spec('P24', 'beer.cli.subcommands.features.extract:main')
def _(args, logger):
    with open(args.feaconf, 'r') as fid:
        new_conf = yaml.load(fid)
    for key in new_conf:
        if key not in feaconf:
            logger.error('Unknown setting "{}"'.format(key))
            exit(1)
    feaconf.update(new_conf)
    dct_bases = compute_dct_bases(feaconf['nfilters'], feaconf['n_dct_coeff'])
    if args.wav_list == '-':
        infile = sys.stdin
    else:
        with open(args.wav_list, 'r') as f:
            infile = f.readlines()
    counts = 0
    for line in infile:
        tokens = line.strip().split()
        uttid, inwav = (tokens[0], ' '.join(tokens[1:]))
        logger.debug(f'processing utterance: {uttid}')
        if inwav[-1] == '|':
            cmd = inwav[:-1]
            logger.debug(f'reading command: {cmd}')
            proc = subprocess.run(cmd, shell=True, stdout=subprocess.PIPE)
            sr, signal = read(io.BytesIO(proc.stdout))
        else:
            logger.debug(f'reading file: {inwav}')
            sr, signal = read(inwav)
        if not sr == feaconf['srate']:
            msg = 'Sampling rate ({}) does not match the one of the given file ({}).'
            logger.error(msg.format(feaconf['srate'], sr))
            exit(1)
        logger.debug('extracting STFT')
        melspec, fft_len = beer.features.short_term_mspec(signal, flen=feaconf['window_len'], frate=feaconf['framerate'], preemph=feaconf['preemph'], srate=feaconf['srate'])
        if feaconf['apply_fbank']:
            logger.debug(f'applying filter bank (F={feaconf['nfilters']})')
            fbank = beer.features.create_fbank(feaconf['nfilters'], fft_len, srate=feaconf['srate'], lowfreq=feaconf['cutoff_lfreq'], highfreq=feaconf['cutoff_hfreq'])
            melspec = melspec @ fbank.T
        logger.debug('log of the STFT')
        log_melspec = np.log(1e-06 + melspec)
        norm = np.sqrt(2.0 / feaconf['nfilters'])
        if feaconf['apply_dct']:
            logger.debug('cosine transform of the log STFT')
            features = log_melspec @ dct_bases
            features *= norm
            logger.debug('cepstrum liftering')
            l_coeff = feaconf['lifter_coeff']
            lifter = 1 + l_coeff / 2 * np.sin(np.pi * (1 + np.arange(feaconf['n_dct_coeff'])) / l_coeff)
            features *= lifter
        else:
            features = log_melspec
        if feaconf['add_energy']:
            logger.debug('add the energy to the features')
            energy = log_melspec.sum(axis=-1) * norm
            features = np.c_[energy, features]
        if feaconf['apply_deltas']:
            logger.debug('concatenating derivatives')
            delta_order = feaconf['delta_order']
            delta_winlen = feaconf['delta_winlen']
            features = beer.features.add_deltas(features, tuple([delta_winlen] * delta_order))
        if feaconf['utt_mnorm']:
            logger.debug('utterance mean normalization')
            features -= features.mean(axis=0)[None, :]
        path = os.path.join(args.outdir, uttid)
        logger.debug(f'saving features to: {path}')
        np.save(path, features)
        counts += 1
    logger.info(f'extracted features for {counts} file(s)')


@spec('P24', 'beer.cli.subcommands.features.extract:ShowDefaultsAction.__call__',
      keep_print=True)
def _(self, parser, namespace, values, option_string):
    print(yaml.dump(feaconf, default_flow_style=False), end='')
    parser.exit()

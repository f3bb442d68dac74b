import numpy as np
import scipy.signal
from beer.features import __triangle
from beer.features import create_fbank
from beer.features import hz2mel
from beer.features import mel2hz


@spec('P24', 'beer.features:hz2mel')
def _(freq_hz):
    return 1127 * np.log(1 + freq_hz / 700.0)


@spec('P24', 'beer.features:mel2hz')
def _(mel):
    return 700.0 * (np.exp(mel / 1127.0) - 1)


@spec('P24', 'beer.features:hz2bark')
def _(freq_hz):
    return 29.81 * freq_hz / (1960 + freq_hz) - 0.53


@spec('P24', 'beer.features:bark2hz')
def _(bark):
    return 1960 * (bark + 0.53) / (29.81 - bark - 0.53)


@spec('P24', 'beer.features:__triangle')
def _(center, start, end, freqs):
    slopes = (1.0 / (center - start), 1.0 / (end - center))
    retval = np.zeros_like(freqs).astype(float)
    idxs = np.logical_and(freqs >= start, freqs <= center)
    retval[idxs] = np.linspace(slopes[0] * (freqs[idxs][0] - start), slopes[0] * (freqs[idxs][-1] - start), len(freqs[idxs]))
    idxs = np.logical_and(freqs >= center, freqs <= end)
    retval[idxs] = np.linspace(slopes[1] * (end - freqs[idxs][0]), slopes[1] * (end - freqs[idxs][-1]), len(freqs[idxs]))
    return retval


@spec('P24', 'beer.features:create_fbank')
def _(nfilters, fft_len=512, srate=16000, lowfreq=0, highfreq=None, hz2scale=hz2mel, scale2hz=mel2hz, align_filt_center=True):
    highfreq = highfreq or srate / 2
    low = hz2scale(lowfreq)
    high = hz2scale(highfreq)
    centers = np.linspace(low, high, nfilters + 2)
    if align_filt_center:
        centers = np.floor(fft_len * scale2hz(centers) / srate)
    else:
        centers = fft_len * scale2hz(centers) / srate
    filters = np.zeros((nfilters, fft_len // 2))
    for i in range(1, nfilters + 1):
        filters[i - 1, :] = __triangle(centers[i], centers[i - 1], centers[i + 1], np.arange(0, fft_len // 2))
    return filters


@spec('P24', 'beer.features:add_deltas')
def _(fea, winlens=(2, 2)):
    fea_list = [fea]
    for wlen in winlens:
        dfilter = -np.arange(-wlen, wlen + 1)
        dfilter = dfilter / (2 * dfilter.dot(dfilter))
        fea = np.r_[fea[[0]].repeat(wlen, 0), fea, fea[[-1]].repeat(wlen, 0)]
        fea = scipy.signal.lfilter(dfilter, 1, fea, 0)[2 * wlen:]
        fea_list.append(fea)
    return np.hstack(fea_list)


@spec('P24', 'beer.features:short_term_mspec')
def _(signal, flen=0.025, frate=0.01, preemph=0.97, srate=16000, window=np.hamming):
    signal = signal - signal.mean()
    frate_samp = int(srate * frate)
    flen_samp = int(srate * flen)
    nframes = (len(signal) - flen_samp) // frate_samp + 1
    isize = signal.dtype.itemsize
    sframes = np.lib.stride_tricks.as_strided(signal, shape=(nframes, flen_samp), strides=(frate_samp * isize, isize), writeable=False).copy()
    sframes -= preemph * np.c_[sframes[:, 0], sframes[:, :-1]]
    sframes = sframes * window(flen_samp)[None, :]
    fft_len = int(2 ** np.floor(np.log2(flen_samp) + 1))
    return (np.abs(np.fft.rfft(sframes, n=fft_len, axis=-1)[:, :-1]), fft_len)


@spec('P24', 'beer.features:fbank')
def _(signal, flen=0.025, frate=0.01, hifreq=8000, lowfreq=20, nfilters=26, preemph=0.97, srate=16000):
    frate_samp = int(srate * frate)
    flen_samp = int(srate * flen)
    nframes = (len(signal) - flen_samp) // frate_samp + 1
    s_t = np.array(signal, dtype=np.float32)
    s_t -= preemph * np.r_[s_t[0], s_t[:-1]]
    isize = s_t.dtype.itemsize
    sframes = np.lib.stride_tricks.as_strided(s_t, shape=(nframes, flen_samp), strides=(frate_samp * isize, isize), writeable=False)
    frames = sframes * np.hamming(flen_samp)[None, :]
    fft_len = int(2 ** np.floor(np.log2(flen_samp) + 1))
    magspec = np.abs(np.fft.rfft(frames, n=fft_len, axis=-1)[:, :-1])
    filters = create_fbank(nfilters, fft_len, srate=srate, lowfreq=lowfreq, highfreq=hifreq)
    melspec = magspec @ filters.T
    return np.log(melspec + 1)

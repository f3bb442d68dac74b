import argparse


@spec('P28', 'recipes.aud.utils.prepare_lang_aud:main', keep_print=True)
def _():
    parser = argparse.ArgumentParser(__doc__)
    parser.add_argument('--non-speech-unit', action='store_true', help='add a non-speech unit named "sil"')
    parser.add_argument('nunits', type=int, help='Maximum number of acoustic units')
    args = parser.parse_args()
    if args.non_speech_unit:
        print('sil', 'non-speech-unit')
    for i in range(1, args.nunits + 1):
        print('au' + str(i), 'speech-unit')

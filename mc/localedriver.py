"""Runs blpk commands in the locale of this process and writes down what came out, as JSON to the file given.

python -B -m mc.localedriver DIR RESULT CONTENT... (contents of the metadata files, in hexadecimal)"""
import json
import os
import sys


def main(where, result, contents):
    from mc import bp
    import locale
    locale.setlocale(locale.LC_ALL, '')
    found = {'encoding': locale.getencoding(), 'runs': []}
    os.chdir(where)
    data = bytes(range(256)) * 2
    names = ['in', b'caf\xc3\xa9', b'\xff\xfe', b'%s']
    for i, content in enumerate(contents):
        content = bytes.fromhex(content)
        name = os.fsdecode(names[i % len(names)])
        for flag in ([], ['-v'], ['-d']):
            bp.write('meta', content)
            bp.write(name, data)
            archive = bp.pack(data, 100, (8, 1, 1, 'lz4'), None, {"old": 1}, ('None', 0, 'md5', 4000))
            bp.write(name + '.app.blp', archive)
            for cmd in (['c', '-m', 'meta', name], ['d', '-e', name + '.blp', 'back'], ['i', name + '.blp'],
                        ['a', '-m', 'meta', name + '.app.blp', name], ['i', name + '.app.blp'], ['d', name + '.app.blp', 'back2'], ['c', name + 'x']):
                old, level, prefix, threads = sys.argv, bp.log.LEVEL, bp.log.PREFIX, bp.blosc.set_nthreads(1)
                sys.argv = ['blpk', '-n', '1'] + flag + cmd
                try:
                    bp.cli.main()
                    status = 'done'
                except SystemExit as e:
                    status = 'exit %s' % e.code
                except Exception as e:
                    status = type(e).__name__
                finally:
                    sys.argv, bp.log.LEVEL, bp.log.PREFIX = old, level, prefix
                    bp.blosc.set_nthreads(threads)
                files = {os.fsencode(n).hex(): bp.read(n).hex() for n in os.listdir('.')}
                found['runs'].append([content.hex(), flag, [os.fsencode(c).hex() for c in cmd], status, files])
            for n in os.listdir('.'):
                os.unlink(n)
    with open(result, 'w', encoding='ascii') as fp:
        json.dump(found, fp)


if __name__ == '__main__':
    main(sys.argv[1], sys.argv[2], sys.argv[3:])

"""
vrun.py check ID [--tier quick|thorough]     decide a property
vrun.py replay FILE                          replay a counterexample on the real code
"""
import json
import os
import sys

if os.environ.get('PYTHONHASHSEED') != '0':
    os.environ['PYTHONHASHSEED'] = '0'
    os.environ['PYTHONDONTWRITEBYTECODE'] = '1'
    os.execv(sys.executable, [sys.executable] + sys.argv)

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'lib'))
import vcore


def main():
    command = sys.argv[1]
    if command == 'check':
        tier = os.environ.get('VERIF_TIER', 'quick')
        if '--tier' in sys.argv:
            tier = sys.argv[sys.argv.index('--tier') + 1]
        sys.exit(vcore.check(sys.argv[2], tier))
    elif command == 'replay':
        request = json.load(open(sys.argv[2]))
        messages = vcore.replay_case(request)
        for m in messages:
            print(m if m else 'not reproduced')
        sys.exit(1 if any(messages) else 0)
    elif command == 'replay-stdin':
        request = json.load(sys.stdin)
        out = os.dup(1)
        result = vcore.replay_case(request)
        os.write(out, b'\nREPLAY-RESULT ' + json.dumps(result).encode() + b'\n')
        sys.stdout.flush()


if __name__ == '__main__':
    main()

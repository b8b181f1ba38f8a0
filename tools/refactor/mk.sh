#!/bin/bash
# mk.sh name...: build refactored copies
cat > /tmp/rf/go.py <<'P'
import sys,subprocess
sys.argv=sys.argv
exec(open('/tmp/rf/mk.py').read())
for n in sys.argv[1:]:
    d='/tmp/rf/'+n
    subprocess.check_call(['rm','-rf',d]); subprocess.check_call(['cp','-a','/repo',d])
    R[n](d)
    subprocess.check_call(['go','vet','./...'],cwd=d)
    subprocess.check_call(['gofmt','-l','.'],cwd=d)
    r=subprocess.run(['go','test','./...'],cwd=d,capture_output=True,text=True)
    print(n,'FAIL' if 'FAIL' in r.stdout else 'ok', r.stdout[-300:] if 'FAIL' in r.stdout else '')
P
. /verif/checker/env.sh 2>/dev/null
python3 /tmp/rf/go.py "$@"

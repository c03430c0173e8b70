bash /opt/vp/test.sh /tmp/out.json >/tmp/t.log 2>&1
python3 -c "
import json,sys
d=json.load(open('/tmp/out.json')); print({k:len(v) for k,v in d.items()}); sys.exit(0 if len(d['passed'])==351 and not d['failed'] else 1)"

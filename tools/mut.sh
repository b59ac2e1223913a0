#!/bin/bash
# Run checks against a scratch clone with a change: tools/mut.sh PROP[,PROP..] <<< "python edit script using sub(path, old, new)"
# The clone (/tmp/mut) and its build (/tmp/mutb) are for development only.
[ -d /tmp/mut ] || git clone -q /repo /tmp/mut
git -C /tmp/mut fetch -q /repo HEAD && git -C /tmp/mut checkout -q -f FETCH_HEAD
cat > /tmp/mut_edit.py
python3 - <<'P' || exit 3
def sub(path, a, b, n=1):
    p = '/tmp/mut/' + path; s = open(p).read(); assert s.count(a) >= 1, (path, a); open(p, 'w').write(s.replace(a, b, n))
exec(open('/tmp/mut_edit.py').read())
P
for p in ${1//,/ }; do VK_REPO=/tmp/mut VK_BUILD=/tmp/mutb VK_DEV=1 python3 /verif/vk/run.py $p ${2:-quick} 2>&1 | grep -v "^VIOLATION" | cut -c1-260 | tail -${3:-4}; done
git -C /tmp/mut checkout -q -f

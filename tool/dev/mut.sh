# mut.sh PROP seed-id...: apply a seeded bug and run a check
P=$1; shift
for b in "$@"; do git -C /repo apply /verif/seeded/$b/patch.diff || exit 1
 (cd /verif; timeout 900 python3 check.py $P | tail -8; echo "$b $P rc=${PIPESTATUS[0]}"); git -C /repo checkout -q -- .; done

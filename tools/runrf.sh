seed=${1:-1}; shift; kinds=${*:-rename temps invert compare unelse reelse comp uncomp whil enum reorder extract aug alg noop}
for k in $kinds; do
rm -rf /tmp/rf_$k; n=$(python3-vt /verif/tools/refactor.py /repo/src/mssm /tmp/rf_$k $k $seed 2>&1 | tail -1); echo "== $k $n"; PYTHONHASHSEED=0 timeout 1500 python3-vt /verif/tools/allfn.py /tmp/rf_$k /repo/src/mssm 2>&1
done

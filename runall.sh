# runall.sh [ids] : every check, one line each
cd /verif; for c in ${@:-$(ls contracts | sed 's/.cpp//')}; do s=$(date +%s); python3 check.py $c ${TIER:-quick} > build/run.$c.log 2>&1; echo "$c rc=$? $(( $(date +%s)-s ))s $(tail -1 build/run.$c.log | cut -c1-150)"; done

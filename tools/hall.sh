cd /tmp
ls /verif/tools/hand/*.txt | xargs -P 6 -I{} sh -c 'python3-vt /verif/tools/hand.py {} > /tmp/hall_$(basename {}).log 2>&1'
grep -hv "^EQUAL" /tmp/hall_*.log | cut -c1-250; grep -c EQUAL /tmp/hall_*.log

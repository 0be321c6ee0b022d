# prof.sh Cxx goal secs : profile
cd /verif; timeout $(( $3 + 40 )) python3-vt -c "
import sys,cProfile,pstats,signal
sys.path.insert(0,'cppvc/engine')
import goalrun
pr=cProfile.Profile()
def fin(*a):
    pr.disable(); pstats.Stats(pr).sort_stats('cumtime').print_stats('engine'); sys.exit()
signal.signal(signal.SIGALRM,fin); signal.alarm($3)
pr.enable()
goalrun.run_goal('build/$1.json','$2',{})
fin()
" 2>&1 | grep -v "exec.py" | awk '{print $1,$2,$4,$6}' | sed 's|/verif/cppvc/engine/||' | head -${4:-30}

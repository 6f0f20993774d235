# dev helper: run scenarios of the dev build briefly. usage: r.sh PATTERN [args]
bash /verif/b.sh; make -q -f /verif/Makefile OUT=/verif/build/dev REPO=/repo 2>/dev/null || { echo BUILD FAILED; exit 1; }; P=$1; shift; export O=$(mktemp -d); /verif/build/dev/flmc list | awk '{print $1"/"$2}' | grep -E "$P" | cut -d/ -f2 | xargs -P 8 -I{} sh -c "timeout 900 /verif/build/dev/flmc run {} -q $* >\$O/{} 2>&1"
for s in $(ls $O); do [ -z "$ALL" ] && head -1 $O/$s | grep -q ": OK" && { head -1 $O/$s | awk '{t="";for(i=1;i<=NF;i++){if($i~/^[0-9.]+s$/)t=$i; if($i~/capped/)t=t" CAPPED"} print "ok",$1,$3,t}'; continue; }; head -1 $O/$s | cut -c1-330; if ! head -1 $O/$s | grep -q ': OK'; then sed 1d $O/$s | grep -v '^\[T. p.\] choose\|^$' | tail -${L:-10} | cut -c1-200; fi; done; rm -r $O

make -f /verif/Makefile OUT=/verif/build/dev REPO=/repo -j8 -s 2>&1 | head -40

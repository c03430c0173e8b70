cd /verif && python3 tools/reg.py "$1" "$2" "$3" && python3 tools/gen.py && python3-vt tools/val.py && git add -A && git commit -qm "Check $1" && echo committed

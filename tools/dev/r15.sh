cd /tmp/w/v2; VERIF_REPO=/tmp/w/r2 VERIF_CASES=${1:-400} VERIF_WALL=${2:-120} VERIF_KEEP_GOING=1  VERIF_SHRINK=${3:-10} VERIF_SEED=${4:-1} python3-vt run.py C15 quick

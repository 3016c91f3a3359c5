# full stable tests in copies, one after another
for id in "$@"; do
 w=/tmp/w/$id
 [ -d $w ] || continue
 cd $w
 export HOME=/root LANG=C.UTF-8 MPLBACKEND=Agg MPLCONFIGDIR=/opt/venv/mplconfig PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1
 export MALLOC_MMAP_THRESHOLD_=4294967296 MALLOC_TRIM_THRESHOLD_=8589934592 MALLOC_TOP_PAD_=67108864 PYTHONPATH=$w
 /opt/venv/bin/python -B -m pytest -q -p no:cacheprovider -n 5 --dist worksteal --ignore=tests/functional/test_wfsc_flc.py tests > /tmp/w/$id.log 2>&1
 echo "$id $(tail -1 /tmp/w/$id.log)" >> /tmp/w/results.txt
 rm -rf /tmp/w/$id
done

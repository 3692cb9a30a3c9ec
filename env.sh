# Offline build environment (the values of /opt/vp/env.sh that matter here).
export PATH="/root/.cargo/bin:$PATH"
export CARGO_NET_OFFLINE=true RUSTUP_TOOLCHAIN=stable RUSTC_WRAPPER=
export PYO3_PYTHON=/usr/bin/python3.12
export PYTHONPATH=/opt/kom-venv/lib/python3.12/site-packages
export PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=agg MPLCONFIGDIR=/opt/kom-venv/mplconfig
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1

#!/bin/bash
# usage: run.sh PROPERTY quick|thorough
set -u
export LANG=C.UTF-8 PATH=/opt/venv/bin:/usr/local/bin:/usr/bin:/bin
export PYTHONDONTWRITEBYTECODE=1 PYTHONIOENCODING=utf8 PYTHONHASHSEED=0 PYTHONUNBUFFERED=1
export MPLBACKEND=Agg QT_QPA_PLATFORM=offscreen VTK_DEFAULT_OPENGL_WINDOW=vtkOSOpenGLRenderWindow
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1 VTK_SMP_MAX_THREADS=1
unset VTK_DEFAULT_OPENGL_WINDOW
cd "$(dirname "$0")" || exit 2
exec /opt/venv/bin/python harness/check.py "$@"

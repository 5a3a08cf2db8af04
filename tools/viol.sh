cd /verif && SIM_CHILD=1 PYTHONHASHSEED=0 TZ=UTC LC_ALL=C.UTF-8 PYTHONDONTWRITEBYTECODE=1 PYTHONPYCACHEPREFIX=/nonexistent/sim exec /opt/venv/bin/python -W ignore /verif/tools/viol.py "$@"

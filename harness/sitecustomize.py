"""Worker processes of a check (its PYTHONPATH points here)."""
import os

if os.environ.get("ALGV_SCRATCH"):
    import fresh
    fresh.install()

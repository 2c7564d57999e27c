"""The clock of P27: operations on the file system take virtual time."""
import os, runpy
runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "p27", "overlay.py"), run_name="__main__")

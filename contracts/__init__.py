"""Contracts by property.  load(pid) imports the modules a property needs."""
import importlib
import os


def load(pid):
    for f in sorted(os.listdir(os.path.dirname(os.path.abspath(__file__)))):
        if f.endswith('.py') and f.lower().startswith(pid.lower() + '_'):
            importlib.import_module('contracts.' + f[:-3])

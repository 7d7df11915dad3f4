"""Executors by name (for replay)."""
from runner import run_plan
from csys import run_csys, run_members
from sections import run_sections
from shells import run_shells
from spectra import run_spectra

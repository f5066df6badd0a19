"""The rules: for every property the client programs that are analysed and the obligations on what they reach."""
from .base import RULES
from . import entries, locking, deferred, threads, keys, deps, web, templates, adapters, signals, scopes, forms, files, histories, wide, stored, frame, heap

__all__ = ['RULES']

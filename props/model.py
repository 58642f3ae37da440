"""Shared by the property modules that build CWL objects."""

from schema_salad.runtime import LoadingOptions

# Copies of a process share its loading options: they are constant during a check,
# and copying their vocabulary tables would be most of the work.
LoadingOptions.__deepcopy__ = lambda self, memo: self

OPTS = LoadingOptions()

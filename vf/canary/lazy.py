"""Only ever imported by a pickle that managed to import it."""
from . import HITS

HITS.append("import of an arbitrary module")

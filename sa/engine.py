"""Entry points used by the property specs."""
import os

from . import interp as IT
from . import models
from . import terms as T

REPO = os.environ.get('OPTAX_SA_REPO', '/repo')


def new(repo=None):
  I = IT.Interp(repo or REPO, models.make)
  T.PROV = I
  return I

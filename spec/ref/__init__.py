from . import models
from . import src

__all__ = ["models", "src"]

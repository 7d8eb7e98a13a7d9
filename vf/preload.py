"""Loaded once in the fork server: torch, the instrumented torch.distributed, and the code under test."""
from . import instrument

instrument.install()
import torch  # noqa

torch.set_num_threads(1)
import logging  # noqa

logging.disable(logging.CRITICAL)
import crypten  # noqa
import crypten.nn  # noqa
import crypten.optim  # noqa
import crypten.communicator  # noqa

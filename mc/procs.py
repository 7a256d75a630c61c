"""Which of how many processes of a distributed job this one pretends to be."""
import contextlib


@contextlib.contextmanager
def process(index, count):
  import jax
  old = jax.process_index, jax.process_count
  jax.process_index = lambda *a, **k: index
  jax.process_count = lambda *a, **k: count
  try:
    yield
  finally:
    jax.process_index, jax.process_count = old

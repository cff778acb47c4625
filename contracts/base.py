"""Helpers shared by the contracts.  The verifier gives `requires` its own meaning (cut the path)."""


class Outside(Exception):
    """The input does not satisfy the precondition."""


def requires(condition):
    if not condition:
        raise Outside()

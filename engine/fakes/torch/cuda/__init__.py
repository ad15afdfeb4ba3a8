def is_available():
    return False


def manual_seed(s):
    pass


def manual_seed_all(s):
    pass

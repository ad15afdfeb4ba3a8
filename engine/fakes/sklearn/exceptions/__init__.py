class DataConversionWarning(UserWarning):
    pass


class NotFittedError(ValueError, AttributeError):
    pass


class ConvergenceWarning(UserWarning):
    pass

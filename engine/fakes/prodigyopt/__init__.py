from torch.optim import _Adaptive


class Prodigy(_Adaptive):
    pass

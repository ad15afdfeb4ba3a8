from engine import symexec as SE


class LRScheduler:
    def __init__(self, opt, *a, **k):
        self.optimizer, self.args, self.kw = opt, a, k

    def step(self, *a):
        SE.run().ghost.setdefault('events', []).append(('sched', self))

    def get_last_lr(self):
        return [g['lr'] for g in self.optimizer.param_groups]


class CosineAnnealingLR(LRScheduler):
    pass


class StepLR(LRScheduler):
    pass


class ExponentialLR(LRScheduler):
    pass


class LambdaLR(LRScheduler):
    pass


class OneCycleLR(LRScheduler):
    pass


_LRScheduler = LRScheduler

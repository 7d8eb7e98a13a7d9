"""Model classes used as registered / unregistered classes."""
import torch
import torch.nn as nn


class Registered(nn.Module):
    def __init__(self, n=3):
        super().__init__()
        self.fc = nn.Linear(n, 2)
        self.act = nn.ReLU()
        self.tag = "t"

    def forward(self, x):
        return self.act(self.fc(x))


class RegisteredToo(Registered):
    pass


class Unregistered(Registered):
    pass


class Outer:
    class Registered(nn.Module):
        pass


class Net(nn.Module):
    """Parameters, buffers of several kinds, shared and nested parts."""

    def __init__(self, n=4, m=3, seed=0, extra=True, bn=True):
        super().__init__()
        g = torch.Generator().manual_seed(seed)
        self.fc1 = nn.Linear(n, m)
        self.act = nn.ReLU()
        self.fc2 = Registered(m)
        self.extra = extra
        if bn:
            self.bn = nn.BatchNorm1d(m)
        if extra:
            big = torch.rand(40, generator=g, dtype=torch.float64) + 3
            self.register_buffer("view", big[5:9])
            self.register_buffer("strided", big[10:30].view(4, 5).t()[1:3])
            self.register_buffer("hidden", torch.rand(3, generator=g, dtype=torch.float64) + 5, persistent=False)
            self.register_buffer("ints", torch.randint(-(2**60), 2**60, (3,), generator=g))
            self.tied = self.fc1.weight
            self.scale = nn.Parameter(torch.rand((), generator=g, dtype=torch.float64) + 7)
            self.frozen = nn.Parameter(torch.rand(2, generator=g, dtype=torch.float64) + 9, requires_grad=False)
        with torch.no_grad():
            for p in list(self.parameters()):
                p.copy_(torch.rand(p.shape, generator=g, dtype=torch.float64).to(p.dtype) + 1)
            if bn:
                self.bn.running_mean.copy_(torch.rand(m, generator=g))
                self.bn.running_var.copy_(torch.rand(m, generator=g) + 1)

    def forward(self, x):
        x = self.fc1(x)
        if hasattr(self, "bn"):
            x = self.bn(x)
        return self.fc2(self.act(x))

"""A stand-in accelerator: torch's `meta` device, made copyable.

There is no GPU in the sandbox.  Tensors on `meta` have shape, dtype and device
but no storage; inside `accelerator()` copying one back to the CPU yields zeros
instead of an error, so placement logic can be executed and observed.
"""
import contextlib

import torch

ACC = torch.device("meta")


@contextlib.contextmanager
def accelerator():
    to, cpu = torch.Tensor.to, torch.Tensor.cpu

    def back(t):
        z = torch.zeros(t.shape, dtype=t.dtype)
        return z.requires_grad_(t.requires_grad) if t.is_floating_point() else z

    def new_to(self, *a, **k):
        dev = k.get("device")
        for v in a:
            if isinstance(v, (str, torch.device)):
                dev = v
            elif isinstance(v, torch.Tensor):
                dev = v.device
        if self.device == ACC and dev is not None and torch.device(dev).type == "cpu":
            return back(self)
        return to(self, *a, **k)

    def new_cpu(self, *a, **k):
        return back(self) if self.device == ACC else cpu(self, *a, **k)

    torch.Tensor.to, torch.Tensor.cpu = new_to, new_cpu
    try:
        yield
    finally:
        torch.Tensor.to, torch.Tensor.cpu = to, cpu

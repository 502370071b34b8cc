"""Spy RTA modules: legal user-defined modules that record every call and answer from a script."""
import numpy as np
from vp.sut import rbase


class SpyRTA(rbase.RTAModule):
    """answers M u + c (then bounded by its own bounds); intervening is scripted per call; everything is logged in a shared list"""

    def __init__(self, name, log, fn, flag, **kw):
        self.name, self.log, self.fn, self.flag = name, log, fn, flag
        super().__init__(**kw)

    @staticmethod
    def x_of(input_state):
        return input_state['x'] if isinstance(input_state, dict) else input_state

    def reset(self):
        super().reset()
        self.log.append((self.name, 'reset', None, None, None))

    def compute_filtered_control(self, input_state, step_size, control_desired):
        input_state = self.x_of(input_state)
        self.log.append((self.name, 'call', np.array(input_state, copy=True), float(step_size), np.array(control_desired, copy=True)))
        u = self.fn(np.array(input_state, float), float(step_size), np.array(control_desired, float))
        self.intervening = bool(self.flag(np.array(input_state, float), np.array(control_desired, float)))
        return u

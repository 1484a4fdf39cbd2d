"""Engine module of servers used by manager scenario"""

from hat.event import common

from . import mgrmod


info = common.ModuleInfo(create=mgrmod.EngineModule.create)

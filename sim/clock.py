# coding: utf-8
"""Simulated clock: replaces the classes and functions that give the current time, in the library and in the standard modules.
Installed in the process of a run only (never undone)."""
import datetime as _dt
import time as _time

REAL = _dt.datetime
_real_time = {k: getattr(_time, k) for k in ('time', 'time_ns', 'localtime', 'gmtime', 'strftime', 'ctime', 'asctime')}


class Clock:
	def __init__(self, start):
		self.t = start              # datetime
		self.tick = _dt.timedelta(0)
		self.given = []             # every time given since the last reset
		self.error = None           # raised at the next reading

	def read(self):
		if self.error is not None:
			e, self.error = self.error, None
			raise e
		t = self.t
		self.given.append(t)
		self.jump(self.tick)
		return t

	def jump(self, delta):
		try:
			t = self.t + delta
			if not 1970 < t.year:
				t = REAL(1971, 1, 1)
		except OverflowError:
			t = REAL(9999, 12, 31, 23, 59, 59, 999999)
		self.t = t


def install(clock):
	from sim.env import patch_everywhere

	class SimDateTime(REAL):
		@classmethod
		def now(cls, tz=None):
			t = clock.read()
			return t if tz is None else t.replace(tzinfo=_dt.timezone.utc).astimezone(tz)

		@classmethod
		def today(cls):
			return clock.read()

		@classmethod
		def utcnow(cls):
			return clock.read()

	class SimDate(_dt.date):
		@classmethod
		def today(cls):
			return clock.read().date()

	def stamp():
		return (clock.read() - REAL(1970, 1, 1)).total_seconds()

	def localtime(s=None):
		return clock.read().timetuple() if s is None else (REAL(1970, 1, 1) + _dt.timedelta(seconds=s)).timetuple()

	new = {'time': stamp, 'time_ns': lambda: int(stamp() * 10 ** 9), 'localtime': localtime, 'gmtime': localtime,
		'strftime': lambda fmt, t=None: _real_time['strftime'](fmt, localtime() if t is None else t),
		'asctime': lambda t=None: _real_time['asctime'](localtime() if t is None else t),
		'ctime': lambda s=None: _real_time['asctime'](localtime(s))}
	patch_everywhere(_dt.datetime, SimDateTime)
	patch_everywhere(_dt.date, SimDate)
	_dt.datetime, _dt.date = SimDateTime, SimDate
	for k, f in new.items():
		patch_everywhere(_real_time[k], f)
		setattr(_time, k, f)

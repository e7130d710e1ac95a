class FuncAnimation:

  def __init__(self, fig, func, frames=None, interval=200, blit=False, **kw):
    self.fig, self.func, self.frames, self.interval, self.blit, self.kw = fig, func, frames, interval, blit, kw

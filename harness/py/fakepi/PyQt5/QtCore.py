"""Stand-in: the thread is run by whoever calls run()."""


class QThread:
    def __init__(self, parent=None):
        pass

    def terminate(self):
        pass

    def wait(self, *a):
        return True

    def start(self):
        self.run()

class VectorfieldPlotter:
    def __init__(self, *args, **kwargs):
        pass

    def plot(self, *args, **kwargs):
        return None

class FixedKernel(object):
    def __init__(self, image):
        self.image = image.clone()

    def clone(self):
        return FixedKernel(self.image)

class Finding(object):
    def __init__(self, key, text):
        self.key, self.text = key, text


class Result(object):
    def __init__(self):
        self.findings = []
        self.coverage = {}
        self.floors = []        # (what, have, at least)
        self.explanation = ''
        self.rules = []
        self.samples = []
        self.files = []
        self.assumptions = []

    def add(self, key, text):
        if not any(f.key == key for f in self.findings):
            self.findings.append(Finding(key, text))

    def floor(self, what, have, want):
        self.coverage[what] = have
        self.floors.append((what, have, want))

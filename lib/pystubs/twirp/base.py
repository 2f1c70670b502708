class Endpoint:
    def __init__(self, service_name, name, function, input, output):
        self.service_name, self.name, self.function, self.input, self.output = service_name, name, function, input, output

from apache_beam import Pipeline


class TestPipeline(Pipeline):
    __test__ = False

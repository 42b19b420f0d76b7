"""The data design given to the generator: built from the current scenario."""


def generate_data_design_config(random_generator):
    from simkit import genconf

    return genconf.build(random_generator)

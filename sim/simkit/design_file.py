"""The experimental design given to the driver: built from the current scenario."""


def generate_experimental_design_config(seed=1):
    from simkit import world

    return world.build_design(seed)

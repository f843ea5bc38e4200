from . import network, sampling, generation, tarjan, degroot, deffuant, activity, laws, strings, config, simulation, files


def add(reg):
    network.add(reg)
    sampling.add(reg)
    generation.add(reg)
    tarjan.add(reg)
    degroot.add(reg)
    deffuant.add(reg)
    activity.add(reg)
    laws.add(reg)
    strings.add(reg)
    config.add(reg)
    simulation.add(reg)
    files.add(reg)

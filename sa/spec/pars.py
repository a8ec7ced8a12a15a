"""Round trips of parameter sets (analysed, never run)."""


def s_rt_MultimediaPar(x: MultimediaPar):
    return MultimediaPar.from_dict(MultimediaPar.to_dict(x))


def s_rt_SequencePar(x: SequencePar):
    return SequencePar.from_dict(SequencePar.to_dict(x))


def s_rt_TrackPar(x: TrackPar):
    return TrackPar.from_dict(TrackPar.to_dict(x))


def s_rt_VolumePar(x: VolumePar):
    return VolumePar.from_dict(VolumePar.to_dict(x))


def s_rt_ControlPar(x: ControlPar):
    return ControlPar.from_dict(ControlPar.to_dict(x))


def s_rt_TargetPar(x: TargetPar):
    return TargetPar.from_dict(TargetPar.to_dict(x))


def s_rt_OrientPar(x: OrientPar):
    return OrientPar.from_dict(OrientPar.to_dict(x))


def s_rt_CalibrationPar(x: CalibrationPar):
    return CalibrationPar.from_dict(CalibrationPar.to_dict(x))


def s_rt_MultiPlanesPar(x: MultiPlanesPar):
    return MultiPlanesPar.from_dict(MultiPlanesPar.to_dict(x))


def s_rt_ExaminePar(x: ExaminePar):
    return ExaminePar.from_dict(ExaminePar.to_dict(x))


def s_rt_PftVersionPar(x: PftVersionPar):
    return PftVersionPar.from_dict(PftVersionPar.to_dict(x))


def s_track_tuple(x: TrackPar):
    return convert_track_par_to_tuple(x)

"""The documented code tables (LinuxCNC reference, as listed in the library's own comments)."""
# word, modal group name, rank in the execution order, parameters, parameters that are retained
AX = 'XYZABCUVW'
CAN = 'XYZUVW'
T = []


def add(words, group, rank, params='', kept=''):
    for w in words.split():
        T.append((w, group, rank, set(params), set(kept)))


add('G0 G1 G5', 'motion', 242, AX)
T[-1] = ('G5', 'motion', 242, set(AX + 'IJPQ'), set())
add('G2 G3', 'motion', 242, AX + 'IJKRP')
add('G5.1', 'motion', 242, AX + 'IJ')
add('G5.2 G5.3', 'motion', 242, AX + 'PL')
add('G33 G33.1', 'motion', 242, AX + 'K')
add('G38.2 G38.3 G38.4 G38.5', 'motion', 242, AX)
add('G80', None, 241, AX)
add('G73 G83', 'motion', 242, CAN + 'RLQ', CAN + 'RQ')
add('G81 G82 G85 G89', 'motion', 242, CAN + 'RLP', CAN + 'RP')
add('G76', 'motion', 242, CAN + 'PZIJRKQHLE')
add('G4', None, 140, 'P')
add('G90 G91', 'distance', 210)
add('G90.1 G91.1', 'arc_ijk_distance', 210)
add('G7 G8', 'lathe_diameter', 210)
add('G93 G94 G95', 'feed_rate_mode', 30)
add('M3 M4 M5', 'spindle', 90)
add('M19', None, 90)
add('G96', 'spindle_speed_mode', 90, 'DS')
add('G97', 'spindle_speed_mode', 90, 'D')
add('M7 M8 M9', 'coolant', 110)
add('G43 G43.2', 'tool_length_offset', 180, 'H')
add('G43.1 G49', 'tool_length_offset', 180)
add('M0 M1 M2 M30 M60', 'stopping', 250)
add('G20 G21', 'units', 160)
add('G17 G18 G19 G17.1 G18.1 G19.1', 'plane_selection', 150)
add('G40', 'cutter_diameter_comp', 170)
add('G41 G42', 'cutter_diameter_comp', 170, 'D')
add('G41.1 G42.1', 'cutter_diameter_comp', 170, 'DL')
add('G61 G61.1', 'control_mode', 200)
add('G64', 'control_mode', 200, 'PQ')
add('G98 G99', 'canned_cycles_return', 220)
add('F100', 'feed_rate', 40)
add('S100', 'spindle_speed', 50)
add('T1', 'tool', 60)
add('M48 M49', 'override_switches', 120)
add('M50 M51 M52 M53', None, 120, 'P')
add('G54 G55 G56 G57 G58 G59 G59.1 G59.2 G59.3', 'coordinate_system', 190)
add('M62 M63 M64 M65', None, 70, 'P')
add('M66', None, 70, 'PELQ')
add('M67 M68', None, 70, 'T')
add('M6', None, 80, 'T')
add('M61', None, 80, 'Q')
add('G10', None, 230, 'LPQRABCXYZ')
add('G28 G30 G28.1 G30.1 G92 G92.1 G92.2 G92.3', None, 230)
add('G53', None, 240)
add('N10', None, 0)
add('O10', None, 1)

WORDS = [t[0] for t in T]
GROUP = dict((t[0], t[1]) for t in T)
RANK = dict((t[0], t[2]) for t in T)
PARAMS = dict((t[0], t[3]) for t in T)
KEPT = dict((t[0], t[4]) for t in T)
GROUPS = sorted(set(g for g in GROUP.values() if g))
MODAL = [w for w in WORDS if GROUP[w]]
MOTION = [w for w in WORDS if GROUP[w] == 'motion']

# class of each code word (the library's public names)
CLASSES = {
    'G0': 'GCodeRapidMove',
    'G1': 'GCodeLinearMove',
    'G5': 'GCodeCublcSpline',
    'G2': 'GCodeArcMoveCW',
    'G3': 'GCodeArcMoveCCW',
    'G5.1': 'GCodeQuadraticSpline',
    'G5.2': 'GCodeNURBS',
    'G5.3': 'GCodeNURBSEnd',
    'G33': 'GCodeSpindleSyncMotion',
    'G33.1': 'GCodeRigidTapping',
    'G38.2': 'GCodeStraightProbe',
    'G38.3': 'GCodeStraightProbe',
    'G38.4': 'GCodeStraightProbe',
    'G38.5': 'GCodeStraightProbe',
    'G80': 'GCodeCancelCannedCycle',
    'G73': 'GCodeDrillingCycleChipBreaking',
    'G83': 'GCodeDrillingCyclePeck',
    'G81': 'GCodeDrillingCycle',
    'G82': 'GCodeDrillingCycleDwell',
    'G85': 'GCodeBoringCycleFeedOut',
    'G89': 'GCodeBoringCycleDwellFeedOut',
    'G76': 'GCodeThreadingCycle',
    'G4': 'GCodeDwell',
    'G90': 'GCodeAbsoluteDistanceMode',
    'G91': 'GCodeIncrementalDistanceMode',
    'G90.1': 'GCodeAbsoluteArcDistanceMode',
    'G91.1': 'GCodeIncrementalArcDistanceMode',
    'G7': 'GCodeLatheDiameterMode',
    'G8': 'GCodeLatheRadiusMode',
    'G93': 'GCodeInverseTimeMode',
    'G94': 'GCodeUnitsPerMinuteMode',
    'G95': 'GCodeUnitsPerRevolution',
    'M3': 'GCodeStartSpindleCW',
    'M4': 'GCodeStartSpindleCCW',
    'M5': 'GCodeStopSpindle',
    'M19': 'GCodeOrientSpindle',
    'G96': 'GCodeSpindleConstantSurfaceSpeedMode',
    'G97': 'GCodeSpindleRPMMode',
    'M7': 'GCodeCoolantMistOn',
    'M8': 'GCodeCoolantFloodOn',
    'M9': 'GCodeCoolantOff',
    'G43': 'GCodeToolLengthOffset',
    'G43.2': 'GCodeAddToolLengthOffset',
    'G43.1': 'GCodeDynamicToolLengthOffset',
    'G49': 'GCodeCancelToolLengthOffset',
    'M0': 'GCodePauseProgram',
    'M1': 'GCodePauseProgramOptional',
    'M2': 'GCodeEndProgram',
    'M30': 'GCodeEndProgramPalletShuttle',
    'M60': 'GCodePalletChangePause',
    'G20': 'GCodeUseInches',
    'G21': 'GCodeUseMillimeters',
    'G17': 'GCodeSelectXYPlane',
    'G18': 'GCodeSelectZXPlane',
    'G19': 'GCodeSelectYZPlane',
    'G17.1': 'GCodeSelectUVPlane',
    'G18.1': 'GCodeSelectWUPlane',
    'G19.1': 'GCodeSelectVWPlane',
    'G40': 'GCodeCutterRadiusCompOff',
    'G41': 'GCodeCutterCompLeft',
    'G42': 'GCodeCutterCompRight',
    'G41.1': 'GCodeDynamicCutterCompLeft',
    'G42.1': 'GCodeDynamicCutterCompRight',
    'G61': 'GCodeExactPathMode',
    'G61.1': 'GCodeExactStopMode',
    'G64': 'GCodePathBlendingMode',
    'G98': 'GCodeCannedCycleReturnPrevLevel',
    'G99': 'GCodeCannedCycleReturnToR',
    'F100': 'GCodeFeedRate',
    'S100': 'GCodeSpindleSpeed',
    'T1': 'GCodeSelectTool',
    'M48': 'GCodeSpeedAndFeedOverrideOn',
    'M49': 'GCodeSpeedAndFeedOverrideOff',
    'M50': 'GCodeFeedOverride',
    'M51': 'GCodeSpindleSpeedOverride',
    'M52': 'GCodeAdaptiveFeed',
    'M53': 'GCodeFeedStop',
    'G54': 'GCodeSelectCoordinateSystem1',
    'G55': 'GCodeSelectCoordinateSystem2',
    'G56': 'GCodeSelectCoordinateSystem3',
    'G57': 'GCodeSelectCoordinateSystem4',
    'G58': 'GCodeSelectCoordinateSystem5',
    'G59': 'GCodeSelectCoordinateSystem6',
    'G59.1': 'GCodeSelectCoordinateSystem7',
    'G59.2': 'GCodeSelectCoordinateSystem8',
    'G59.3': 'GCodeSelectCoordinateSystem9',
    'M62': 'GCodeDigitalOutputOnSyncd',
    'M63': 'GCodeDigitalOutputOffSyncd',
    'M64': 'GCodeDigitalOutputOn',
    'M65': 'GCodeDigitalOutputOff',
    'M66': 'GCodeWaitOnInput',
    'M67': 'GCodeAnalogOutputSyncd',
    'M68': 'GCodeAnalogOutputImmediate',
    'M6': 'GCodeToolChange',
    'M61': 'GCodeToolSetCurrent',
    'G10': 'GCodeSet',
    'G28': 'GCodeGotoPredefinedPosition',
    'G30': 'GCodeGotoPredefinedPosition',
    'G28.1': 'GCodeSetPredefinedPosition',
    'G30.1': 'GCodeSetPredefinedPosition',
    'G92': 'GCodeCoordSystemOffset',
    'G92.1': 'GCodeResetCoordSystemOffset',
    'G92.2': 'GCodeResetCoordSystemOffset',
    'G92.3': 'GCodeRestoreCoordSystemOffset',
    'G53': 'GCodeMoveInMachineCoords',
    'N10': 'GCodeLineNumber',
    'O10': 'GCodeProgramName',
}

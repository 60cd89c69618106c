"""Independent table of the 22 object types: RP66 set types, record types and standard attribute labels.

Each attribute is (keyword of the add_* call, python attribute on the item, RP66 label, kind).

kinds
  T    text                       TL   list of texts
  I    identifier (free text)     E:<enum> hard enumeration (identifier)   S:<enum> soft enumeration
  P    property indicators (list of identifiers from an enumeration)
  F    float                      FL   list of floats                 FM   (nested) list of floats
  W    whole number               D    date-time                      DF   date-time or float
  V    (nested) list of numbers or texts      C  list of numbers or texts
  R:<set types>   reference       RL:<set types>  list of references
  RT   text or LONG-NAME reference            RA  reference to any object (object reference)
  RAL  list of references to any object (object references)
  DIM  list of dimensions         ST  status (0/1)                    B  0/1 flag
"""

TYPES = {}


class OType:
    def __init__(self, key, set_type, lr_type, attrs):
        self.key, self.set_type, self.lr_type = key, set_type, lr_type
        self.attrs = {}
        self.labels = []
        for a in attrs:
            kw, kind = a[0], a[1]
            py = a[2] if len(a) > 2 else kw
            label = a[3] if len(a) > 3 else py.strip("_").upper().replace("_", "-")
            self.attrs[kw] = (py, label, kind)
            self.labels.append(label)

    @property
    def adder(self):
        return "add_" + self.key


def _t(key, set_type, lr_type, *attrs):
    TYPES[key] = OType(key, set_type, lr_type, attrs)


_t("axis", "AXIS", 2, ("axis_id", "I"), ("coordinates", "C"), ("spacing", "F"))
_t("calibration", "CALIBRATION", 5,
   ("calibrated_channels", "RL:channel"), ("uncalibrated_channels", "RL:channel"),
   ("coefficients", "RL:calibration_coefficient"), ("measurements", "RL:calibration_measurement"),
   ("parameters", "RL:parameter"), ("method", "I"))
_t("calibration_coefficient", "CALIBRATION-COEFFICIENT", 5,
   ("label", "I"), ("coefficients", "FL"), ("references", "FL"), ("plus_tolerances", "FL"),
   ("minus_tolerances", "FL"))
_t("calibration_measurement", "CALIBRATION-MEASUREMENT", 5,
   ("phase", "E:CalibrationMeasurementPhase"), ("measurement_source", "RA1"), ("measurement_type", "I", "type"),
   ("dimension", "DIM"), ("axis", "RL:axis"), ("measurement", "FM"), ("sample_count", "W"),
   ("maximum_deviation", "FM"), ("standard_deviation", "FM"), ("begin_time", "DF"), ("duration", "F"),
   ("reference", "FM"), ("standard", "FM"), ("plus_tolerance", "FM"), ("minus_tolerance", "FM"))
_t("channel", "CHANNEL", 3,
   ("long_name", "RT"), ("properties", "P"), ("units", "S:Unit"), ("dimension", "DIM"), ("axis", "RL:axis"),
   ("element_limit", "DIM"), ("source", "RA"), ("minimum_value", "FL"), ("maximum_value", "FL"))
_t("comment", "COMMENT", 6, ("text", "TL"))
_t("computation", "COMPUTATION", 5,
   ("long_name", "RT"), ("properties", "P"), ("dimension", "DIM"), ("axis", "RL:axis"), ("zones", "RL:zone"),
   ("values", "FM"), ("source", "RO"))
_t("equipment", "EQUIPMENT", 5,
   ("trademark_name", "T"), ("status", "ST"), ("eq_type", "S:EquipmentType", "_type"), ("serial_number", "I"),
   ("location", "S:EquipmentLocation"), ("height", "F"), ("length", "F"), ("minimum_diameter", "F"),
   ("maximum_diameter", "F"), ("volume", "F"), ("weight", "F"), ("hole_size", "F"), ("pressure", "F"),
   ("temperature", "F"), ("vertical_depth", "F"), ("radial_drift", "F"), ("angular_drift", "F"))
_t("frame", "FRAME", 4,
   ("description", "T"), ("channels", "RL:channel"), ("index_type", "S:FrameIndexType"), ("direction", "I"),
   ("spacing", "F"), ("encrypted", "B"), ("index_min", "F"), ("index_max", "F"))
_t("group", "GROUP", 5,
   ("description", "T"), ("object_list", "RAL"), ("group_list", "RL:group"))
_t("long_name", "LONG-NAME", 9,
   ("general_modifier", "TL"), ("quantity", "T"), ("quantity_modifier", "TL"), ("altered_form", "T"),
   ("entity", "T"), ("entity_modifier", "TL"), ("entity_number", "T"), ("entity_part", "T"),
   ("entity_part_number", "T"), ("generic_source", "T"), ("source_part", "TL"), ("source_part_number", "TL"),
   ("conditions", "TL"), ("standard_symbol", "T"), ("private_symbol", "T"))
_t("message", "MESSAGE", 6,
   ("message_type", "I", "_type"), ("time", "DF"), ("borehole_drift", "F"), ("vertical_depth", "F"),
   ("radial_drift", "F"), ("angular_drift", "F"), ("text", "TL"))
_t("no_format", "NO-FORMAT", 8, ("consumer_name", "I"), ("description", "T"))
_t("origin", "ORIGIN", 1,
   ("file_set_name", "I"), ("file_set_number", "W"), ("file_number", "W"), ("file_type", "I"), ("product", "T"),
   ("version", "T"), ("programs", "TL"), ("creation_time", "D"), ("order_number", "T"), ("descent_number", "W16"),
   ("run_number", "W16"), ("well_id", "T"), ("well_name", "T"), ("field_name", "T"), ("producer_code", "W16"),
   ("producer_name", "T"), ("company", "T"), ("name_space_name", "I"), ("name_space_version", "W"))
_t("parameter", "PARAMETER", 5,
   ("long_name", "RT"), ("dimension", "DIM"), ("axis", "RL:axis"), ("zones", "RL:zone"), ("values", "V"))
_t("path", "PATH", 4,
   ("frame_type", "R:frame"), ("well_reference_point", "R:well_reference_point"), ("value", "RL:channel"),
   ("borehole_depth", "F"), ("vertical_depth", "F"), ("radial_drift", "F"), ("angular_drift", "F"), ("time", "F"),
   ("depth_offset", "F"), ("measure_point_offset", "F"), ("tool_zero_offset", "F"))
_t("process", "PROCESS", 5,
   ("description", "T"), ("trademark_name", "T"), ("version", "T"), ("properties", "P"),
   ("status", "E:ProcessStatus"), ("input_channels", "RL:channel"), ("output_channels", "RL:channel"),
   ("input_computations", "RL:computation"), ("output_computations", "RL:computation"),
   ("parameters", "RL:parameter"), ("comments", "TL"))
_t("splice", "SPLICE", 5,
   ("output_channel", "R:channel"), ("input_channels", "RL:channel"), ("zones", "RL:zone"))
_t("tool", "TOOL", 5,
   ("description", "T"), ("trademark_name", "T"), ("generic_name", "T"), ("parts", "RL:equipment"),
   ("status", "ST"), ("channels", "RL:channel"), ("parameters", "RL:parameter"))
_t("well_reference_point", "WELL-REFERENCE", 1,
   ("permanent_datum", "T"), ("vertical_zero", "T"), ("permanent_datum_elevation", "F"),
   ("above_permanent_datum", "F"), ("magnetic_declination", "F"), ("coordinate_1_name", "T"),
   ("coordinate_1_value", "F"), ("coordinate_2_name", "T"), ("coordinate_2_value", "F"),
   ("coordinate_3_name", "T"), ("coordinate_3_value", "F"))
_t("zone", "ZONE", 5,
   ("description", "T"), ("domain", "E:ZoneDomain"), ("maximum", "DF"), ("minimum", "DF"))

BY_SET_TYPE = {t.set_type: t for t in TYPES.values()}
EXTRA_LABELS = {"channel": ["REPRESENTATION-CODE"], "origin": ["FILE-ID"], "group": ["OBJECT-TYPE"]}
# attributes whose label is OBJECT-TYPE etc. can never be assigned through add_*, so they decode as absent

UNITS_OK = {"F", "FL", "FM", "C", "V", "DF", "D"}      # kinds on which units may be set through the public API


def kind_of(key, kw):
    return TYPES[key].attrs[kw][2]

# The standard's closed sets (member name -> value), frozen here so that the oracle does not trust the library.
ENUMS = {
    'Unit': {
        'AMPERE': 'A', 'KELVIN': 'K', 'CANDELA': 'cd', 'API_GRAVITY': 'dAPI', 'DECIBEL': 'dB',
        'API_GAMMA_RAY': 'gAPI', 'KILOGRAM': 'kg', 'METER': 'm', 'MOLE': 'mol', 'API_NEUTRON': 'nAPI',
        'RADIAN': 'rad', 'SECOND': 's', 'STERADIAN': 'sr', 'BRITISH_THERMAL_UNIT': 'Btu', 'COULOMB': 'C',
        'DARCY': 'D', 'GIGAPASCAL': 'GPa', 'GAL': 'Gal', 'HERTZ': 'Hz', 'JOULE': 'J', 'LITER': 'L',
        'MEGAHERTZ': 'MHz', 'MEGAPASCAL': 'MPa', 'MEGAELECTRONVOLT': 'MeV', 'MEGAGRAM': 'Mg',
        'MEGA_POUNDS_PER_SQUARE_METER': 'Mpsi', 'NEWTON': 'N', 'OERSTED': 'Oe', 'POISE': 'P', 'PASCAL': 'Pa',
        'SIEMENS': 'S', 'TESLA': 'T', 'VOLT': 'V', 'WATT': 'W', 'WEBER': 'Wb', 'ANNUM': 'a', 'ACRE': 'acre',
        'STD_ATMOSPHERE': 'atm', 'BARN': 'b', 'BAR': 'bar', 'BARREL': 'bbl', 'REVOLUTION_CYCLE': 'c',
        'CENTIPOISE': 'cP', 'CALORIE': 'cal', 'CENTIMETER': 'cm', 'CAPTURE_UNIT': 'cu', 'DAY': 'd',
        'DECANEWTON': 'daN', 'DEGREE_ANGLE': 'deg', 'DEGREE_CELSIUS': 'degC', 'DEGREE_FAHRENHEIT': 'degF',
        'DECIMETER': 'dm', 'ELECTRONVOLT': 'eV', 'FEMTOCOULOMB': 'fC', 'FOOT': 'ft', 'GRAM': 'g',
        'GALLON': 'gal', 'HOUR': 'h', 'INCH': 'in', 'KILOHERTZ': 'kHz', 'KILOPASCAL': 'kPa', 'KILOVOLT': 'kV',
        'KILOELECTRONVOLT': 'keV', 'KILOGRAM_FORCE': 'kgf', 'KILOMETER': 'km', 'POUND_FORCE': 'lbf',
        'POUND_MASS': 'lbm', 'MILLIAMPERE': 'mA', 'MILLICOULOMB': 'mC', 'MILLIDARCY': 'mD',
        'MILLIGAL': 'mGal', 'MILLILITER': 'mL', 'MILLISIEMENS': 'mS', 'MILLITESLA': 'mT', 'MILLIVOLT': 'mV',
        'MILLIWAT': 'mW', 'MILLIGRAM': 'mg', 'MINUTE': 'min', 'MILLIMETER': 'mm', 'MILLIOHM': 'mohm',
        'MILLISECOND': 'ms', 'NANOCOULOMB': 'nC', 'NANOWATT': 'nW', 'NANOSECOND': 'ns', 'OHM': 'ohm',
        'PICCOCOULOMB': 'pC', 'PICOPASCAL': 'pPa', 'PART_PER_TEN_THOUSAND': 'ppdk',
        'PART_PER_THOUSAND': 'ppk', 'PART_PER_MILLION': 'ppm', 'POUND_PER_SQUARE_INCH': 'psi',
        'POROSITY_UNIT': 'pu', 'METRIC_TON': 't', 'US_SHORT_TON': 'ton', 'MICROAMPERE': 'uA',
        'MICROCOULOMB': 'uC', 'MICROPASCAL': 'uPa', 'MICROVOLT': 'uV', 'MICROMETER': 'um', 'MICROOHM': 'uohm',
        'MICRO_POUND_PER_SQUARE_INCH': 'upsi', 'MICROSECOND': 'us',
    },
    'Property': {
        'AVERAGED': 'AVERAGED', 'CALIBRATED': 'CALIBRATED', 'CHANGED_INDEX': 'CHANGED-INDEX',
        'COMPUTED': 'COMPUTED', 'DEPTH_MATCHED': 'DEPTH-MATCHED', 'DERIVED': 'DERIVED',
        'FILTERED': 'FILTERED', 'HOLE_SIZE_CORRECTED': 'HOLE-SIZE-CORRECTED',
        'INCLINOMETRY_CORRECTED': 'INCLINOMETRY-CORRECTD', 'LITHOLOGY_CORRECTED': 'LITHOLOGY-CORRECTED',
        'LOCAL_COMPUTATION': 'LOCAL-COMPUTATION', 'LOCALLY_DEFINED': 'LOCALLY-DEFINED',
        'MODELLED': 'MODELLED', 'MUDCAKE_CORRECTED': 'MUDCAKE-CORRECTED', 'NORMALIZED': 'NORMALIZED',
        'OVERSAMPLED': 'OVER-SAMPLED', 'PATCHED': 'PATCHED', 'PRESSURE_CONTROLLED': 'PRESSURE-CORRECTED',
        'RESAMPLED': 'RE-SAMPLED', 'SALINITY_CONTROLLED': 'SALINITY-CORRECTED',
        'SAMPLED_DOWNWARD': 'SAMPLED-DOWNWARD', 'SAMPLED_UPWARD': 'SAMPLED-UPWARD',
        'SPEED_CORRECTED': 'SPEED-CORRECTED', 'SPLICED': 'SPLICED', 'SQUARED': 'SQUARED',
        'STACKED': 'STACKED', 'STD': 'STANDARD-DEVIATION', 'STANDOFF_CORRECTED': 'STANDOFF-CORRECTED',
        'TEMPERATURE_CORRECTED': 'TEMPERATURE-CORRECTED', 'UNDERSAMPLED': 'UNDER-SAMPLED',
    },
    'CalibrationMeasurementPhase': {
        'AFTER': 'AFTER', 'BEFORE': 'BEFORE', 'MASTER': 'MASTER',
    },
    'EquipmentType': {
        'ADAPTER': 'Adapter', 'BOARD': 'Board', 'BOTTOM_NOSE': 'Bottom-Nose', 'BRIDLE': 'Bridle',
        'CABLE': 'Cable', 'CALIBRATOR': 'Calibrator', 'CARTRIDGE': 'Cartridge', 'CENTRALIZER': 'Centralizer',
        'CHAMBER': 'Chamber', 'CUSHION': 'Cushion', 'DEPTH_DEVICE': 'Depth-Device', 'DISPLAY': 'Display',
        'DRAWER': 'Drawer', 'EXCENTRALIZER': 'Excentralizer', 'EXPLOSIVE_SOURCE': 'Explosive-Source',
        'FLASK': 'Flask', 'GEOPHONE': 'Geophone', 'GUN': 'Gun', 'HEAD': 'Head', 'HOUSING': 'Housing',
        'JIG': 'Jig', 'JOINT': 'Joint', 'NUCLEAR_DETECTOR': 'Nuclear-Detector', 'PACKER': 'Packer',
        'PAD': 'Pad', 'PANE': 'Pane', 'POSITIONING': 'Positioning', 'PRINTER': 'Printer',
        'RADIOACTIVE_SOURCE': 'Radioactive-Source', 'SHIELD': 'Shield', 'SIMULATOR': 'Simulator',
        'SKID': 'Skid', 'SONDE': 'Sonde', 'SPACER': 'Spacer', 'STANDOFF': 'Standoff', 'SYSTEM': 'System',
        'TOOL': 'Tool', 'TOOL_MODULE': 'Tool-Module', 'TRANSDUCER': 'Transducer',
        'VIBRATION_SOURCE': 'Vibration-Source',
    },
    'EquipmentLocation': {
        'LOGGING_SYSTEM': 'Logging-System', 'REMOTE': 'Remote', 'RIG': 'Rig', 'WELL': 'Well',
    },
    'FrameIndexType': {
        'ANGULAR_DRIFT': 'ANGULAR-DRIFT', 'BOREHOLE_DEPTH': 'BOREHOLE-DEPTH', 'NON_STANDARD': 'NON-STANDARD',
        'RADIAL_DRIFT': 'RADIAL-DRIFT', 'VERTICAL_DEPTH': 'VERTICAL-DEPTH',
    },
    'ProcessStatus': {
        'COMPLETE': 'COMPLETE', 'ABORTED': 'ABORTED', 'IN_PROGRESS': 'IN-PROGRESS',
    },
    'ZoneDomain': {
        'BOREHOLE_DEPTH': 'BOREHOLE-DEPTH', 'TIME': 'TIME', 'VERTICAL_DEPTH': 'VERTICAL-DEPTH',
    },
}


def h5_names(names):
    """Can datasets of these names (paths) be in one HDF5 file?"""
    canon = set()
    for n in names:
        parts = n[1:].split("/") if n.startswith("/") else n.split("/")
        if any(x in ("", ".", "..") or x.strip(".") == "" for x in parts) or any(ord(c) > 127 or c == "\0" for c in n):
            return False
        canon.add("/".join(parts))
    return len(canon) == len(set(names)) and not any(a != b and b.startswith(a + "/") for a in canon for b in canon)

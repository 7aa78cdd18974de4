"""Which harnesses (contracts) decide which property."""
TRUSTED = [
    'rustc 1.99.1 / LLVM: the IR the obligations are generated from (opt-level 2, overflow checks on, panic=abort) means what the source means; codegen below the IR is not covered',
    'vcgen/: the obligation generator (IR parser, symbolic executor, term simplifier), written for this task',
    'z3 (bit-vectors + uninterpreted functions)',
    'the specifications in harness/src',
]
ASSUMPTIONS = [
    'machine integers are exact bit-vectors (no mathematical-integer abstraction); every overflow, slice and unwrap panic is an obligation',
    'IEEE-754 operations are uninterpreted functions normalised only by bit-exact laws (commutativity, sign symmetry, scaling by powers of two, exact constant folding); libm calls (powf, sqrt, exp2) are uninterpreted',
    'NaN payload and sign bits are not part of the specification',
]
TECHNIQUE = 'contract-based deductive verification: pre/postconditions on the real functions, weakest-precondition style obligations generated from the compiled (LLVM IR) form of the current source and discharged by z3 for all inputs'
LEVEL_NOTE = 'Every obligation is discharged for all inputs with no bound on data; loops have source-constant trip counts and are unrolled completely. Float operations are uninterpreted (specification and code must perform the same operations up to bit-exact laws). Trusts rustc/LLVM IR, the obligation generator in vcgen/, z3 and the specifications in harness/src.'
NOT_APPLICABLE = {}
WORK = ()
PROPS = {
    'C01': dict(
        harness=['c01_add_checksum', 'c01_intact', 'c01_single', 'c01_double', 'c01_any_word'],
        functions=['mlx90641::hamming::add_checksum', 'mlx90641::hamming::validate_checksum', 'util::is_bit_set'],
    ),
    'C02': dict(
        harness=['c02_status', 'c02_control_get', 'c02_control_set', 'c02_equality', 'c02_i2c'],
        functions=['register::StatusRegister (all accessors, eq, byte conversions)', 'register::ControlRegister (all accessors, eq, byte conversions, defaults)', 'register::I2cRegister (all accessors, eq, byte conversions)', 'register::FrameRate::{from_raw,as_raw}', 'register::Resolution::{from_raw,as_raw}', 'util::is_bit_set'],
        not_covered=['reserved bits of the I2C configuration register are not preserved by its byte conversion (the type stores three flags); the driver never writes that register'],
    ),
    'C03': dict(
        harness=['c03_rate_f32', 'c03_rate_u8', 'c03_rate_back', 'c03_codes', 'c03_resolution_u8', 'c03_resolution_correction'],
        functions=['register::FrameRate conversions (f32, u8, Duration, camera code)', 'register::Resolution conversions', 'register::Subpage conversions', 'register::AccessPattern conversions', 'mlx90640::Mlx90640::resolution_correction', 'mlx90641::Mlx90641::resolution_correction'],
    ),
    'C11': dict(
        harness=['c11_mlx90640', 'c11_mlx90641', 'c11_constants'],
        functions=['calculations::delta_v', 'calculations::v_dd', 'calculations::v_ptat_art', 'calculations::ambient_temperature', 'calculations::CommonIrData::new', 'calculations::sensitivity_correction_coefficient', 'calculations::t_ar', 'MelexisCamera constants of both cameras'],
    ),
    'C06': dict(
        harness=['c06_640_chess_0', 'c06_640_chess_1', 'c06_640_interleave_0', 'c06_640_interleave_1', 'c06_641_interleave_0', 'c06_641_interleave_1', 'c06_641_chess_0', 'c06_641_chess_1', 'c06_aux_640', 'c06_aux_641', 'c06_eeprom_640', 'c06_eeprom_641'],
        functions=['common::read_ram', 'calculations::RamData::from_i2c', 'mlx90640::Mlx90640Pixels::next', 'mlx90641::SubpageInterleave::next', 'MelexisCamera::{pixel_ranges,compensation_pixel,T_A_V_BE,T_A_PTAT,GAIN,V_DD_PIXEL}', 'Mlx90640Calibration::from_i2c', 'Mlx90641Calibration::from_i2c'],
    ),
    'C07': dict(
        harness=['c07_mlx90640_chess', 'c07_mlx90640_interleave', 'c07_mlx90641'],
        functions=['mlx90640::Mlx90640PixelSubpage::next', 'Mlx90640::pixels_in_subpage', 'Mlx90641::pixels_in_subpage'],
    ),
    'C12': dict(
        harness=['c12_one_pixel'] + ['c12_640_%s_%d' % (p, s) for p in ('chess', 'interleave') for s in (0, 1)] + ['c12_641_%s_%d' % (p, s) for p in ('chess', 'interleave') for s in (0, 1)],
        functions=['calculations::per_pixel_v_ir', 'calculations::raw_pixels_to_ir_data', 'calculations::CommonIrData::new', 'MelexisCamera::pixels_in_subpage'],
    ),
    'C13': dict(
        harness=['c13_one_pixel'] + ['c13_640_%s_%d' % (p, s) for p in ('chess', 'interleave') for s in (0, 1)] + ['c13_641_%s_%d' % (p, s) for p in ('chess', 'interleave') for s in (0, 1)],
        functions=['calculations::per_pixel_temperature', 'calculations::raw_ir_to_temperatures', 'calculations::t_ar', 'calculations::sensitivity_correction_coefficient'],
    ),
    'C14': dict(
        harness=['c14_640_%s_%d' % (p, s) for p in ('chess', 'interleave') for s in (0, 1)] + ['c14_641_%s_%d' % (p, s) for p in ('chess', 'interleave') for s in (0, 1)]
        + ['c14_640_short_0', 'c14_640_short_1', 'c14_640_short_33', 'c14_640_short_767', 'c14_641_short_17', 'c14_641_short_191', 'c14_640_any_members', 'c14_641_any_members', 'c14_640_short_data', 'c14_641_short_data'],
        functions=['calculations::raw_pixels_to_ir_data', 'calculations::raw_ir_to_temperatures', 'calculations::raw_pixels_to_temperatures'],
    ),
    'C04': dict(
        harness=['c04_set_640', 'c04_set_641', 'c04_get_640', 'c04_get_641'],
        functions=['CameraDriver::set_{overwrite_enabled,use_subpages,data_hold,subpage_repeat,subpage,frame_rate,resolution,access_pattern}', 'CameraDriver getters of the same fields', 'CameraDriver::{status_register,set_status_register,control_register,set_control_register,new_with_calibration}', 'StatusRegister/ControlRegister FromI2C, ToI2C'],
    ),
    'C05': dict(
        harness=['c05_%s_%s%s' % (c, p, f) for c in ('640', '641') for p in ('chess', 'interleave') for f in ('', '_read_fails', '_write_fails')],
        functions=['CameraDriver::{control_register,set_control_register,update_control_register,new_with_calibration}', 'every control and status getter and setter of CameraDriver', 'CameraDriver::{generate_image_subpage_to,generate_raw_image_subpage_to,read_ram}'],
    ),
    'C15': dict(
        harness=['c15_settings_640', 'c15_settings_641'] + ['c15_640_%s_%s_%d' % (v, p, s) for v in ('raw', 'temp') for p in ('chess', 'interleave') for s in (0, 1)]
        + ['c15_640_latest_chess_0', 'c15_640_latest_interleave_1', 'c15_641_raw_chess_0', 'c15_641_raw_interleave_1', 'c15_641_latest_chess_1', 'c15_641_latest_interleave_0']
        + ['c15_641_temp_%s_%d' % (p, s) for p in ('chess', 'interleave') for s in (0, 1)],
        functions=['CameraDriver::{generate_raw_image_subpage_to,generate_image_subpage_to,generate_image_to,read_ram}', 'CameraDriver::{override_emissivity,use_default_emissivity,effective_emissivity,set_reflected_temperature,reflected_temperature,ambient_temperature,width,height,new_with_calibration}', 'common::read_ram', 'calculations::{raw_pixels_to_ir_data,raw_pixels_to_temperatures}'],
    ),
    'C08': dict(
        harness=['c08_globals', 'c08_offset', 'c08_alpha', 'c08_k_ta', 'c08_k_v', 'c08_interleave', 'c08_flags', 'c08_refused', 'c08_camera'],
        functions=['Mlx90640Calibration::{from_i2c,from_data,calculate_bulk_pixel_calibration,repeat_chessboard,generate_k_ta_pixels,get_access_pattern_corrections,get_temperature_range_data}', 'CalibrationData for Mlx90640Calibration (every getter and iterator)', 'mlx90640::eeprom::{word_to_u4s,word_to_i4s,word_6_10_split,ChessboardIter,PixelAccessPatternCompensation}', 'util::{Buffer,i16_from_bits,is_bit_set}', 'common::{alpha_correction_coefficients,alpha_corr_n,FlaggedPixels::any}'],
        not_covered=['sensitivity and K_Ta of a pixel the EEPROM marks as failed (they are meaningless)', 'FlaggedPixels::iter_flagged is the bitvec crate\'s iter_ones over the proved bits'],
    ),
    'C09': dict(
        harness=['c09_contract', 'c09_globals', 'c09_ranges', 'c09_offset', 'c09_alpha', 'c09_k_ta', 'c09_k_v', 'c09_flags', 'c09_refused'],
        functions=['Mlx90641Calibration::{from_data,get_scaled_cp_constant,get_resolution_with_tgc,get_temperature_range_data}', 'PerPixelCalibration::{from_data,get_sensitivity_reference}', 'CalibrationData for Mlx90641Calibration (every getter and iterator)', 'mlx90641::eeprom::{get_hamming_u16,get_hamming_i16,get_combined_word,split_6_5,get_6_5_split,i16_from_i11}', 'mlx90641::hamming::validate_checksum (value of a word: contract C01)', 'common::{alpha_correction_coefficients,alpha_corr_n,FlaggedPixels::any}'],
        contracts={'hamming[0-9]+validate_checksum$': 'contract_validate_checksum'},
        assumptions=['the second word of a 16-bit value (gain, PTAT, offset average, compensation pixel offset) holds its five bits and nothing above them, as the datasheet says'],
        not_covered=['values of a pixel the EEPROM marks as failed (they are meaningless)'],
    ),
    'C10': dict(
        harness=['c10_contract', 'c10_640_any', 'c10_640_short', 'c10_640_long', 'c10_641_any', 'c10_641_correctable', 'c10_641_uncorrectable', 'c10_641_short', 'c10_641_long'],
        functions=['Mlx90640Calibration::from_data and everything it calls', 'Mlx90641Calibration::from_data and everything it calls', 'util::Buffer for &[u8]', 'mlx90641::hamming::validate_checksum (contract, proved by c10_contract)'],
        contracts={'hamming[0-9]+validate_checksum$': 'contract_validate_checksum'},
        bounded=['images longer than the EEPROM: every length up to 2047 bytes more'],
        not_covered=['which error an image with both an uncorrectable word and an offset out of range gives (it is refused)'],
    ),
    'C16': dict(
        harness=['c16_ready_%s_%s_%d' % (c, p, s) for c in ('640', '641') for p in ('chess', 'interleave') for s in (0, 1)]
        + ['c16_%s_%s' % (o, c) for o in ('not_ready', 'acknowledge', 'synchronize') for c in ('640', '641')],
        functions=['CameraDriver::generate_image_if_ready', 'CameraDriver::{data_available,reset_data_available,last_measured_subpage,status_register,set_status_register}', 'CameraDriver::synchronize (loop of unbounded length, closed by induction)', 'StatusRegister::{new_data,reset_new_data,set_overwrite_enabled,set_start_measurement} and its I2C conversions'],
        not_covered=['termination of the wait: the camera may never flag data (partial correctness: every return is correct)'],
    ),
    'C17': dict(
        harness=['c17_settings_640', 'c17_settings_641', 'c17_acknowledge', 'c17_synchronize_640', 'c17_synchronize_641', 'c17_construct', 'c17_registers', 'c17_frame_read_640', 'c17_frame_read_641']
        + ['c17_image_640_%s_%s' % (p, v) for p in ('chess', 'interleave') for v in ('raw', 'subpage', 'latest', 'ready')]
        + ['c17_image_641_chess_raw', 'c17_image_641_interleave_subpage', 'c17_image_641_interleave_latest', 'c17_image_641_chess_ready', 'c17_image_641_interleave_ready'],
        functions=['CameraDriver: every operation that uses the bus', 'common::read_ram', 'calculations::RamData::from_i2c', 'StatusRegister/ControlRegister/I2cRegister FromI2C and ToI2C', 'Mlx90640Calibration::from_i2c', 'Mlx90641Calibration::from_i2c'],
        assumptions=['each transfer position is a separate obligation set: the number of transfers per operation is the one C06/C16 prove'],
    ),
}

for _w in WORK:
    PROPS.pop(_w)

"""Property -> harness modules."""

PROPERTIES = {
    "C01": {"modules": ["c01_fingerprints"]},
    "C04": {"modules": ["c04_partition_fields"]},
    "C02": {"modules": ["c02_models"]},
    "C03": {"modules": ["c03_versions"]},
    "C05": {"modules": ["c05_paths"], "gcs": True},
    "C06": {"modules": ["c06_discovery"], "gcs": True},
    "C07": {"modules": ["c07_templates"], "gcs": True},
    "C08": {"modules": ["c08_input_fingerprints"]},
    "C09": {"modules": ["c09_snapshots"], "gcs": True},
    "C10": {"modules": ["c10_builds"], "gcs": True},
    "C11": {"modules": ["c11_calls"], "gcs": True},
    "C12": {"modules": ["c12_interrupted"], "gcs": True},
    "C13": {"modules": ["c13_validation"], "gcs": True},
    "C14": {"modules": ["c14_backend"]},
    "C15": {"modules": ["c15_box"]},
    "C16": {"modules": ["c16_graphs"]},
    "C17": {"modules": ["c17_frozendict"]},
    "C18": {"modules": ["c18_hints"]},
    "C19": {"modules": ["c19_pyarrow"], "stand_ins": ["pyarrow"]},
    "C20": {"modules": ["c20_bigquery"], "stand_ins": ["bigquery"]},
    "C21": {"modules": ["c21_frames"], "stand_ins": ["pandas"]},
    "C22": {"modules": ["c22_registries"]},
    "C23": {"modules": ["c23_io"], "gcs": True},
    "C24": {"modules": ["c24_definitions"]},
    "C25": {"modules": ["c25_wiring"]},
    "C26": {"modules": ["c26_subtypes"]},
    "C27": {"modules": ["c27_dispatch"]},
    "C28": {"modules": ["c28_values"]},
    "C29": {"modules": ["c29_access"]},
    "C30": {"modules": ["c30_copies"]},
    "C31": {"modules": ["c31_models"]},
}

NOT_APPLICABLE = {}

entries!(
    cli::cli_idl,
    cli::cli_schemata,
    cli::cli_dirs,
    cli::cli_args,
    cli::cli_options,
    cli::cli_full,
);

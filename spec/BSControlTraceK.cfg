CONSTANT Kdk = TRUE
SPECIFICATION TSpec

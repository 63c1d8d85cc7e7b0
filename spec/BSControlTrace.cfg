CONSTANT Kdk = FALSE
SPECIFICATION TSpec

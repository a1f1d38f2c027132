fn private_only() {}

export const mem = async () => ({ total: 4e9, available: 2e9, used: 1e9, free: 1e9 }); export const currentLoad = async () => ({ currentLoad: 1, cpus: [] });
